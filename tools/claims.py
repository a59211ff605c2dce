TECH='symbolic execution of the compiled LLVM IR with SMT verdicts'
PENDING='the check for this property is not built yet'
SETUP='true'
HOOKS=dict(guard='--cfg aether_verif (RUSTFLAGS)',enable='the O03 check builds with RUSTFLAGS=--cfg aether_verif; std::thread in aether_opt is then a sequential scheduler',source_commits=['3ae512bfbc9ab9615dab2dbb04b8a6f1f5995f23'])
NOTES='Checks run symbolic execution (engine/) over the LLVM IR rustc emits for /repo\'s crates; see DESIGN.md.  Exit status 2 means the check reached no verdict.'
NA={}
CLAIMS={}
def claim(i,note,**k): CLAIMS[i]=dict(note=note,**k)
B='every value within the stated bounds is decided by the solver; bounds are in the evidence file'
for i,n in (('T01','no floating point; '+B),('T02','no floating point; '+B),('T03','no floating point; '+B),
            ('T04','years outside 1201..2799 (round trip) and -4000..4000 (succession) are outside the bound; '+B),
            ('T05','histories of at most three polls or steps, and at most three periods late; '+B),
            ('T06','rates of zero ticks per second are a precondition; '+B)): claim(i,n)
R='floating point is read as exact real arithmetic (idealised constants, no rounding, no overflow, unsigned zeros); libm functions are exact; '+B
for i in ('A01','A02','A03','A04','A05','A06','F01'): claim(i,R)
claim('F02','body_to_ned is a listed known finding, a second harness still pins it up to transposition; '+R)
for i in ('M01','M02','M03','N01','N02','N03'): claim(i,R)
claim('M05','shapes are those listed; indices beyond the stated ranges are outside the claim; '+B)
for i in ('E01','E03','E04'): claim(i,R)
claim('E02','the pressure jumps above 91 km are listed known findings; '+R)
claim('F03','closed-form inverse: 14 fixed sites (all longitudes) and all heights on the equator; iterative inverse: the equator; '+R)
for i in ('G01','H01','S01','S02'): claim(i,R)
claim('U01',R)
claim('D01',R)
claim('R01','floating point is decided bit for bit; '+B)
claim('K01','floating point is decided bit for bit (norms: exact reals); the helpers that ignore not-a-number are listed known findings; '+B)
for i in ('O01','O02','L02','C01'): claim(i,R)
claim('L01','the gradient is compared with the derivative of the loss at a symbolic pair of points; '+R)
claim('E05','five latitudes and heights carry the full-degree comparison; subterms without inputs are evaluated to 35 digits; '+R)
claim('M04','x86 kernels only (NEON and DSP kernels do not compile here); '+R)
claim('O03','workers run one at a time, as wholes, in every order; interleavings inside a worker (lost updates through atomics) are outside the claim; '+R)
claim('P01','library functions behind the abstraction (libm and the platform) are assumed to compute what they are named after; sign, order and constants are decided bit for bit; '+B)
claim('W01','floating point is decided bit for bit; text formats that print decimal digits are outside the claim (serde is driven through a token format in the harness); '+B)
claim('V01','the reader is compiled from the source against a modelled file (visible length, identity, creation time); decimal parsing is modelled exactly; '+B)
