// linked where the tree has no FFT0/DCT0 as raw.cpp knows them
#include "raw.h"
bool raw_available() { return false; }
Raw* raw_make(char, char, int) { return nullptr; }
