from auto import make

make(globals(), "C42", 4)
