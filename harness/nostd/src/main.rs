fn main() { symrt::main(h_nostd::TABLE) }
