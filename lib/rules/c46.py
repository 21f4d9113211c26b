from auto import make

make(globals(), "C46", 13)
