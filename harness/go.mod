module verif

go 1.22.4
