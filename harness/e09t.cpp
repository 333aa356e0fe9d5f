#include "conc.h"
int main(int argc, char** argv) { return conc::main("E09", true, argc, argv); }
