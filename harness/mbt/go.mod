module verifmbt

go 1.23.0
