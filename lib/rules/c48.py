from auto import make

make(globals(), "C48", 9)
