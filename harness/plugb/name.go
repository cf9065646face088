package main

const name = "b"
