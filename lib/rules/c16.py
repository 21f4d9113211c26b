from auto import make

make(globals(), "C16", 13)
