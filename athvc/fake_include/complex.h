#ifndef FAKE_COMPLEX
#define FAKE_COMPLEX
#endif
