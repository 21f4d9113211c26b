from auto import make

make(globals(), "C21", 7)
