from auto import make

make(globals(), "C31", 53)
