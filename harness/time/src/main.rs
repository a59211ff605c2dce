fn main() { symrt::main(h_time::TABLE) }
