// The only source of chance. One seed, one execution.
export class Rng {
    constructor(seed) {
        this.s = BigInt.asUintN(64, BigInt(seed) ^ 0x9e3779b97f4a7c15n)
        this.lo = Number(this.s & 0xffffffffn) | 0
        this.hi = Number((this.s >> 32n) & 0xffffffffn) | 0
        this.a = 0x243f6a88 ^ this.lo
        this.b = 0x85a308d3 ^ this.hi
        this.c = 1
        this.d = this.lo ^ (this.hi << 1)
        for (let i = 0; i < 12; i++) this.u32()
    }
    // sfc32
    u32() {
        const t = (((this.a + this.b) | 0) + this.d) | 0
        this.d = (this.d + 1) | 0
        this.a = this.b ^ (this.b >>> 9)
        this.b = (this.c + (this.c << 3)) | 0
        this.c = (this.c << 21) | (this.c >>> 11)
        this.c = (this.c + t) | 0
        return t >>> 0
    }
    below(n) {
        return n <= 0 ? 0 : this.u32() % n
    }
    range(a, b) {
        return a + this.below(b - a + 1)
    }
    chance(permille) {
        return this.below(1000) < permille
    }
    pick(list) {
        return list[this.below(list.length)]
    }
}

export class Hash {
    constructor() {
        this.a = 0x811c9dc5
        this.b = 0x1234567
    }
    add(text) {
        for (let i = 0; i < text.length; i++) {
            const c = text.charCodeAt(i)
            this.a = Math.imul(this.a ^ c, 0x01000193)
            this.b = (Math.imul(this.b, 31) + c) | 0
        }
        this.a = Math.imul(this.a ^ 0xff, 0x01000193)
    }
    hex() {
        return (this.a >>> 0).toString(16).padStart(8, "0") + (this.b >>> 0).toString(16).padStart(8, "0")
    }
}
