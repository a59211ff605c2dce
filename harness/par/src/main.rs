fn main() { symrt::main(h_par::TABLE) }
