/* Conformance harness for layers, models, losses and optimizers (C14-C20, C23). */
#include "net_world.hpp"
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [] { return new NetWorld(); }); }
