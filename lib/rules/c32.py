from auto import make

make(globals(), "C32", 31)
