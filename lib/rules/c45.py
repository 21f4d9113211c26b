from auto import make

make(globals(), "C45", 28)
