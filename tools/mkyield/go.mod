module mkyield

go 1.23
