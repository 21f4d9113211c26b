from auto import make

make(globals(), "C15", 55)
