from auto import make

make(globals(), "C41", 30)
