from auto import make

make(globals(), "C19", 0)
