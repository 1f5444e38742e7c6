typedef double fftw_complex[2]; typedef struct fp_s *fftw_plan;
