from auto import make

make(globals(), "C04", 35)
