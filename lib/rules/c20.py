from auto import make

make(globals(), "C20", 78)
