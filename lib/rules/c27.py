from auto import make

make(globals(), "C27", 0)
