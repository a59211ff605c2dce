fn main() { symrt::main(h_linalg::TABLE) }
