/* Conformance harness for training loops under chosen schedules (C21). */
#include "train_world.hpp"
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [] { return new TrainWorld(); }); }
