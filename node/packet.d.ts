export declare class Reader {
    constructor(data: ArrayBuffer);
    failed: boolean;
    read_uint8(): number;
    read_uint16(): number;
    read_uint32(): number;
    read_int8(): number;
    read_int16(): number;
    read_int32(): number;
    read_float(): number;
    read_string(length: number): string;
}
export declare class Writer {
    constructor(buffer?: ArrayBuffer);
    write_uint8(value: number): void;
    write_uint16(value: number): void;
    write_uint32(value: number): void;
    write_int8(value: number): void;
    write_int16(value: number): void;
    write_int32(value: number): void;
    write_float(value: number): void;
    write_string(value: string): void;
    finish(): ArrayBuffer;
}
