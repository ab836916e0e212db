module github.com/DataDog/zstd

go 1.11
