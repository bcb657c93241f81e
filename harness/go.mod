module verif.local/h

go 1.23
