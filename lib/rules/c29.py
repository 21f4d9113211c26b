from auto import make

make(globals(), "C29", 24)
