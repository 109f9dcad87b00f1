module verif/bb

go 1.24

