fn main() { symrt::main(h_viz::TABLE) }
