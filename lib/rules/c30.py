from auto import make

make(globals(), "C30", 17)
