// The transforms that take their work arrays from the caller (README: FFT0, DCT0), behind an interface of the driver's own.
#pragma once
struct Raw { virtual ~Raw() {} virtual void run(int op, double* x, double* y, double* z) const = 0; };
bool raw_available();
Raw* raw_make(char kind, char be, int n);
