fn main() { symrt::main(h_models::TABLE) }
