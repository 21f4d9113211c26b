from auto import make

make(globals(), "C11", 31)
