from auto import make

make(globals(), "C10", 51)
