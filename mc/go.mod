module verif.local/mc

go 1.26.2
