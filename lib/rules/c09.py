from auto import make

make(globals(), "C09", 27)
