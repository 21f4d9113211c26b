from auto import make

make(globals(), "C39", 4)
