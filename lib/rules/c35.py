from auto import make

make(globals(), "C35", 9)
