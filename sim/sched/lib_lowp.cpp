#include "../inst_lowp.cpp"
