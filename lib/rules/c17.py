from auto import make

make(globals(), "C17", 49)
