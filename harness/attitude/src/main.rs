fn main() { symrt::main(h_attitude::TABLE) }
