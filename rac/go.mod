module verif/rac

go 1.15
