from auto import make

make(globals(), "C26", 27)
