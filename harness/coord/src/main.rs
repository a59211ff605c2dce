fn main() { symrt::main(h_coord::TABLE) }
