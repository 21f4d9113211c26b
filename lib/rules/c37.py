from auto import make

make(globals(), "C37", 165)
