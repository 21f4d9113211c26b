from auto import make

make(globals(), "C22", 77)
