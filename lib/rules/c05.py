from auto import make

make(globals(), "C05", 29)
