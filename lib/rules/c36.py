from auto import make

make(globals(), "C36", 26)
