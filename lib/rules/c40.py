from auto import make

make(globals(), "C40", 14)
