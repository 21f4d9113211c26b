from auto import make

make(globals(), "C43", 18)
