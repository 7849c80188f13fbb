#include "vtrace.h"
int main(){}
