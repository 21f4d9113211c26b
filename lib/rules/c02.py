from auto import make

make(globals(), "C02", 26)
