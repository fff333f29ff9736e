-- Runs inside Neovim: loads the plugin, does what it is told, line by line, and reports what the
-- plugin sent and what the buffer looks like.
local repo = os.getenv("PLUG_REPO")
vim.opt.runtimepath:prepend(repo .. "/vim-plugin")
vim.o.swapfile = false
vim.o.shadafile = "NONE"
vim.o.hidden = true
vim.o.fileformats = "unix"

local sent, waiting, dispatchers, errors

vim.lsp.rpc.start = function(...)
    for _, a in ipairs({ ... }) do
        if type(a) == "table" and a.notification then
            dispatchers = a
        end
    end
    local id = 0
    return {
        request = function(method, params, callback)
            id = id + 1
            waiting[id] = callback
            table.insert(sent, { id = id, method = method, params = params })
            return true, id
        end,
        notify = function(method, params)
            table.insert(sent, { method = method, params = params })
            return true
        end,
        terminate = function() end,
        is_closing = function()
            return false
        end,
    }
end
vim.api.nvim_err_writeln = function(text)
    table.insert(errors, text)
end
print = function() end

local function fresh()
    sent, waiting, dispatchers, errors = {}, {}, nil, {}
    vim.cmd("silent edit " .. vim.fn.fnameescape(os.getenv("HOME") .. "/elsewhere"))
    for _, f in ipairs(vim.fn.glob(repo .. "/vim-plugin/plugin/**/*.lua", false, true)) do
        dofile(f)
    end
end

-- What is in the buffers of the given files.
local function texts(paths)
    local result = vim.empty_dict()
    for _, path in ipairs(paths or {}) do
        local b = vim.fn.bufnr("^" .. path .. "$")
        if b ~= -1 and vim.api.nvim_buf_is_loaded(b) then
            local lines = vim.api.nvim_buf_get_lines(b, 0, -1, true)
            result[path] = table.concat(lines, "\n") .. (vim.bo[b].eol and "\n" or "")
        end
    end
    return result
end

local function deliver(messages)
    for _, m in ipairs(messages or {}) do
        if m.id then
            local callback = waiting[m.id]
            waiting[m.id] = nil
            if m.error then
                callback({ message = m.error, code = 1 }, nil)
            else
                callback(nil, m.result)
            end
        else
            dispatchers.notification(m.method, m.params)
        end
    end
end

local deliveries
function Deliver()
    deliver(table.remove(deliveries, 1))
end

local commands = {
    fresh = function()
        fresh()
    end,
    open = function(c)
        vim.cmd("silent edit " .. vim.fn.fnameescape(c.path))
    end,
    switch = function(c)
        vim.cmd("silent buffer " .. vim.fn.bufnr(c.path))
    end,
    close = function(c)
        vim.cmd("silent " .. (c.unload and "bdelete" or "bwipeout") .. "! " .. vim.fn.bufnr(c.path))
    end,
    -- Keys as typed; the given mark stands for "what has arrived by now is handled".
    keys = function(c)
        deliveries = c.deliver or {}
        local keys = vim.api.nvim_replace_termcodes(c.keys, true, false, true)
        keys = keys:gsub("\1", vim.api.nvim_replace_termcodes("<Cmd>lua Deliver()<CR>", true, false, true))
        Keys = keys
        -- Without "silent!", a key that does nothing takes the ones after it away.
        local ok, e = pcall(vim.cmd, "silent! lua vim.api.nvim_feedkeys(Keys, 'xn', false)")
        if not ok then
            table.insert(errors, tostring(e))
        end
        for _ = 1, #deliveries do
            Deliver()
        end
    end,
    ex = function(c)
        -- Commands are typed in normal mode.
        vim.api.nvim_feedkeys(vim.api.nvim_replace_termcodes("<Esc>", true, false, true), "xn", false)
        local ok, e = pcall(vim.cmd, "silent! " .. c.command)
        if not ok then
            table.insert(errors, tostring(e))
        end
    end,
    deliver = function(c)
        deliver(c.messages)
    end,
    look = function() end,
}

while true do
    local line = io.read("*l")
    if not line then
        os.exit(0)
    end
    local c = vim.json.decode(line)
    local ok, e = pcall(commands[c.op], c)
    local answer = { sent = sent or {}, texts = texts(c.paths), name = vim.api.nvim_buf_get_name(0), errors = errors or {}, mode = vim.fn.mode() }
    if not ok then
        answer.failed = tostring(e)
    end
    sent, errors = {}, {}
    if #answer.sent == 0 then
        answer.sent = vim.empty_dict()
    end
    if #answer.errors == 0 then
        answer.errors = vim.empty_dict()
    end
    io.write(vim.json.encode(answer), "\n")
    io.flush()
end
