#include "conc.h"
int main(int argc, char** argv) { return conc::main("E07", false, argc, argv); }
