from auto import make

make(globals(), "C08", 56)
