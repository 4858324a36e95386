// Text streams where numbers are kept as one mark and eight octets
#define RAW_NUMBERS
#include "models_os.cpp"
