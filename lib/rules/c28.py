from auto import make

make(globals(), "C28", 45)
