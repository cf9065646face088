package main

const name = "a"
