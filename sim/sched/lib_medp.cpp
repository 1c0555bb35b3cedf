#include "../inst_medp.cpp"
