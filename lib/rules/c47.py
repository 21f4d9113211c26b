from auto import make

make(globals(), "C47", 17)
