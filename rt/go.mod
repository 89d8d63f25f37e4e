module verifrt

go 1.21
