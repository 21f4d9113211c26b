from auto import make

make(globals(), "C34", 18)
